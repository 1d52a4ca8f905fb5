from mpi4py import MPI
COMM = MPI.COMM_WORLD


class Mesh:
    def __init__(self):
        self._elements_ = COMM.scatter([[1, 2], [3]], root=0)

    def run(self):
        for e in self._elements_:
            COMM.barrier()


def main():
    Mesh().run()
