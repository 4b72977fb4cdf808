"""Independent column by column reading of the two line element format."""

def _cols(line, a, b):
    """Columns a..b, numbered from 1."""
    return line[a - 1:b]


def _in(s, chars):
    return all(c in chars for c in s)


D = "0123456789"
SD = " " + D
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALPHA5 = SD + "".join(c for c in UP if c not in "IO")


def checksum(line):
    return sum(D.index(c) if c in D else (1 if c == "-" else 0) for c in line[:68]) % 10


def ok1(x):
    if len(x) != 69:
        return False
    c = lambda a, b=None: _cols(x, a, b or a)
    ndot = c(34, 43)
    nd_ok = (ndot[0] in " 0+-" and ndot[1] == "." and _in(ndot[2:], SD)) or \
            (ndot[0] == " " and ndot[1] in " +-" and ndot[2] == "." and _in(ndot[3:], SD))
    exp = lambda f: f[0] in " +-" and _in(f[1:6], SD) and f[6] in "+-" and f[7] in SD
    return (c(1, 2) == "1 " and c(3) in ALPHA5 and _in(c(4, 7), SD) and c(8) in UP and c(9) == " " and _in(c(10, 14), SD) and _in(c(15, 17), " " + UP)
            and c(18) == " " and _in(c(19, 23), SD) and c(24) == "." and _in(c(25, 32), SD) and c(33) == " " and nd_ok and c(44) == " "
            and exp(c(45, 52)) and c(53) == " " and exp(c(54, 61)) and c(62) == " " and c(63) in SD and c(64) == " " and _in(c(65, 68), SD)
            and c(69) in D and int(c(69)) == checksum(x))


def ok2(x):
    if len(x) != 69:
        return False
    c = lambda a, b=None: _cols(x, a, b or a)
    ang = lambda a: _in(c(a, a + 2), SD) and c(a + 3) == "." and _in(c(a + 4, a + 7), SD)
    return (c(1, 2) == "2 " and c(3) in ALPHA5 and _in(c(4, 7), SD) and c(8) == " " and ang(9) and c(17) == " " and ang(18) and c(26) == " "
            and _in(c(27, 33), SD) and c(34) == " " and ang(35) and c(43) == " " and ang(44) and c(52) == " " and _in(c(53, 54), SD) and c(55) == "."
            and _in(c(56, 68), SD) and c(69) in D and int(c(69)) == checksum(x))
