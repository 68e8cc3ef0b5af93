from .c03 import Weak, W4


class C04(Weak):
    id = "C04"; weights = W4


PROP = C04()
