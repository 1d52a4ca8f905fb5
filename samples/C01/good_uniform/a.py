from mpi4py import MPI
COMM = MPI.COMM_WORLD
RANK = COMM.Get_rank()


def norm(x, n):
    for i in range(n):
        x = COMM.allreduce(x)
    if RANK == 0:
        y = COMM.bcast(x, root=0)
    else:
        y = COMM.bcast(None, root=0)
    if y > 0:
        COMM.barrier()
    return y


def main():
    norm(RANK, 3)
