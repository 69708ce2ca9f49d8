// Verification intrinsics understood by /verif/irv.  Every function below is a contract primitive,
// none of them exists at run time.
#ifndef VERIF_HPP
#define VERIF_HPP
extern "C" {
long verif_nondet_long(const char*);
long verif_nondet_range(const char*, long lo, long hi);   // lo <= result < hi
bool verif_nondet_bool(const char*);
int  verif_nondet_int(const char*);
void verif_assume(bool);
void verif_assert(bool, const char*);
void verif_cover(const char*);
void verif_stop() __attribute__((noreturn));
void verif_touch();
int  verif_choice(int, const char*);
long verif_ite(bool, long, long);
bool verif_and(bool, bool);
bool verif_or(bool, bool);
bool verif_not(bool);
bool verif_may(bool);
bool verif_must(bool);
long verif_uf0(const char*);
long verif_uf1(const char*, long);
long verif_uf2(const char*, long, long);
long verif_uf3(const char*, long, long, long);
bool verif_up0(const char*);
bool verif_up1(const char*, long);
bool verif_up2(const char*, long, long);
bool verif_up3(const char*, long, long, long);
void verif_log(const char*, long);
long verif_concretize(long);
bool verif_is_init(const void*);
bool verif_alive(const void*);
bool verif_freed(const void*);
long verif_block_size(const void*);                        // bytes from the pointer to the end of its block
bool verif_mutex_held(const void*);
int  verif_locks_held();
void verif_env(bool on);                                   // run vf_env() before every atomic operation and lock acquisition
void verif_monitor(const void*, long size, const char* name); // plain accesses need a lock inside the region
void verif_monitor_by(const void*, long size, const void* mutex, const char* name);
void verif_monitor_off(bool);
int  verif_depth();          // nesting of splits to explore (2 in the quick tier, 3 in the thorough tier)
}
#endif
