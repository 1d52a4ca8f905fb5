from mpi4py import MPI
COMM = MPI.COMM_WORLD
RANK = COMM.Get_rank()


def norm(x):
    return COMM.allreduce(x)


def report(x):
    if RANK == 0:
        print(norm(x))
