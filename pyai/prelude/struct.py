def unpack_from(fmt, buffer, offset=0):
    return unpack(fmt, str(buffer[offset:offset + calcsize(fmt)]))


class Struct(object):

    def __init__(self, format):
        self.format = format
        self.size = calcsize(format)

    def pack(self, *values):
        return pack(self.format, *values)

    def unpack(self, data):
        return unpack(self.format, data)

    def unpack_from(self, buffer, offset=0):
        return unpack_from(self.format, buffer, offset)
