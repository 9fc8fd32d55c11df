#!/bin/bash
# bash build.sh OUTDIR: builds the simulator OUTDIR/lbsim around the interpreter's sources in /repo (or $REPO).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=${1:?usage: build.sh OUTDIR}
mkdir -p "$OUT/sut" "$OUT/sim"

MAP="signal=sim_signal __sysv_signal=sim_sysv_signal sigaction=sim_sigaction siginterrupt=sim_siginterrupt sigprocmask=sim_sigprocmask
pthread_sigmask=sim_pthread_sigmask raise=sim_raise exit=sim_exit _exit=sim_exit_now _Exit=sim_Exit atexit=sim_atexit
abort=sim_abort __assert_fail=sim_assert_fail fopen=sim_fopen fopen64=sim_fopen64 fclose=sim_fclose rename=sim_rename
remove=sim_remove unlink=sim_unlink access=sim_access fsync=sim_fsync fdatasync=sim_fdatasync open=sim_open open64=sim_open64
creat=sim_creat mkstemp=sim_mkstemp fdopen=sim_fdopen read=sim_read write=sim_write close=sim_close lseek=sim_lseek
lseek64=sim_lseek64 ftruncate=sim_ftruncate ftruncate64=sim_ftruncate64 stat=sim_stat stat64=sim_stat64 lstat=sim_lstat
fstat=sim_fstat fstat64=sim_fstat64 fileno=sim_fileno isatty=sim_isatty time=sim_time gettimeofday=sim_gettimeofday
clock_gettime=sim_clock_gettime clock=sim_clock sleep=sim_sleep usleep=sim_usleep nanosleep=sim_nanosleep getpid=sim_getpid
fork=sim_fork vfork=sim_vfork rand=sim_rand srand=sim_srand random=sim_random srandom=sim_srandom drand48=sim_drand48
srand48=sim_srand48 getrandom=sim_getrandom system=sim_system popen=sim_popen malloc=sim_malloc calloc=sim_calloc
realloc=sim_realloc reallocarray=sim_reallocarray free=sim_free strdup=sim_strdup __strdup=sim_strdup2 strndup=sim_strndup
__strndup=sim_strndup_ asprintf=sim_asprintf vasprintf=sim_vasprintf getline=sim_getline getdelim=sim_getdelim
freopen=sim_freopen freopen64=sim_freopen64 tmpfile=sim_tmpfile tmpfile64=sim_tmpfile64
__getdelim=sim_getdelim_ main=sut_main"
REDEF=""
for m in $MAP; do REDEF="$REDEF --redefine-sym $m"; done
SECT=""
# all writable data of the interpreter goes into two sections that are restored before every life
export REDEF REPO OUT HERE

sut() {
  src=$1
  obj=$OUT/sut/$(echo "${src#$REPO/}" | tr / _ | sed 's/\.c$/.o/')
  gcc -std=gnu11 -g -O1 -U_FORTIFY_SOURCE -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fsanitize-coverage=trace-pc -fno-pic -fno-common \
    -fno-data-sections -fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc -fno-builtin-realloc -fno-builtin-strdup \
    -ftrivial-auto-var-init=pattern -w -I"$REPO/Basic" -I"$REPO/Monitor" -I"$REPO/Shared" -I"$REPO/System" -c "$src" -o "$obj.raw" || exit 1
  objcopy $REDEF --rename-section .data=sut_data --rename-section .bss=sut_bss,alloc,load,data,contents "$obj.raw" "$obj" || exit 1
}
sim() {
  g++ -std=c++17 -O2 -g1 -Wall -Wextra -fno-pic -c "$HERE/$1.cpp" -o "$OUT/sim/$1.o" || exit 1
}
export -f sut sim
{
  for f in gen main runner model world parser lexer util; do echo "sim $f"; done
  for f in "$REPO"/Basic/*.c "$REPO"/Monitor/*.c "$REPO"/Shared/*.c "$REPO"/System/*.c; do
    case $f in */CuTest.c) ;; *) echo "sut $f" ;; esac
  done
} | xargs -P 8 -I{} bash -c '{}' || { echo "build failed" >&2; exit 1; }
g++ -no-pie -fsanitize=address,undefined -o "$OUT/lbsim" "$OUT"/sim/*.o "$OUT"/sut/*.o
