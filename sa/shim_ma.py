"""Analysed stand-in for numpy.ma.MaskedArray (used for abstract arguments)."""


class MaskedArray:
    def __init__(self, data, mask):
        self.data = data
        self.mask = mask

    def __getitem__(self, i):
        return MaskedArray(self.data[i], self.mask[i])

    def __len__(self):
        return len(self.data)

    def __add__(self, o):
        return self.data + o

    def __radd__(self, o):
        return o + self.data

    def __sub__(self, o):
        return self.data - o

    def __rsub__(self, o):
        return o - self.data

    def __mul__(self, o):
        return self.data * o

    def __rmul__(self, o):
        return o * self.data

    def __truediv__(self, o):
        return self.data / o

    def __neg__(self):
        return -self.data

    def count(self):
        return len(self.data[~self.mask])

    def compressed(self):
        return self.data[~self.mask].copy()

    @property
    def shape(self):
        return self.data.shape

    @property
    def size(self):
        return self.data.size

    @property
    def T(self):
        return self.data.T


def count_masked(a):
    return len(a.data[a.mask])


def getmaskarray(a):
    return a.mask


def getmask(a):
    return a.mask


def getdata(a):
    return a.data


def compressed(a):
    return a.compressed()
