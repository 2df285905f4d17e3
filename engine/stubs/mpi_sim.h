#ifndef MPI_SIM_H
#define MPI_SIM_H
// Run body(rank) for every rank; returns when all ranks have finished.
// nChoices: number of scheduling decisions that are symbolic (all
// interleavings of the first nChoices decisions are explored).
void mpi_sim_run(int nRanks, void (*body)(int, void *), void *arg, int nChoices = 0);
// execute f as rank r of n outside of a run (no communication that blocks)
void mpi_sim_more(int n);
void mpi_sim_as(int r, int n);
int mpi_sim_rank();
int mpi_sim_size();
extern long mpi_sim_messages, mpi_sim_decisions;
extern bool mpi_sim_deadlock;
#endif
