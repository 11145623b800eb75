from pyai.harness import STRIDE

# where the thorough tier costs little the quick tier explores it too, elsewhere an even sample of it
for _p in ('C01 C02 C06 C13 C17 C20 C21 C22 C24 C25 C27 C28 C31 C32 C33 C34 C36 C38 C39 C44').split():
    STRIDE[_p] = 1
STRIDE.update({'C03': 10, 'C04': 5, 'C05': 4, 'C08': 3, 'C09': 30, 'C16': 12, 'C30': 8, 'C35': 3, 'C37': 15, 'C45': 4})
