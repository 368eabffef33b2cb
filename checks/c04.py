import c16


def main(c):
    c16.main(c, view=True)
