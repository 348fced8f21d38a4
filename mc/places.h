// Two threads that run one at a time; where one gives way to the other is
// chosen beforehand.  The library is compiled with calls of the hooks at the
// start and the end of each of its functions: those are the places.
#ifndef PLACES_H
#define PLACES_H
#ifdef __cplusplus
extern "C" {
#endif
// at: at which of its places a thread gives way (0: nowhere); what counts as
// a place: 0 each start and end of a function; -1 where a function is started
// for the first time; k > 0 the first k times that a function is started or
// ended by a call from one place in the code; locks taken and given up always
void sched_reset(long at0, long at1, int what);
void sched_begin(int id);
void sched_end(int id);
long sched_places(int id);
int sched_gave(int id);         /* the thread came to that place */
int sched_overlapped(void);     /* a thread went on because the other one waited for it */
#ifdef __cplusplus
}
#endif
#endif
