#!/bin/bash
# compiles the program for DOS, runs it in DOSBox; it has to print PASS
here=$(cd "$(dirname "$0")" && pwd)
B=/repo/_build/inst/bin
export PATH=$B:$PATH SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
cp "$here"/prog.c .
TARGET=$(cat "$here/target.txt")
EXE=PROG.EXE; [ "$TARGET" = dost ] && EXE=PROG.COM
smlrcc -$TARGET prog.c -o $EXE || exit 3
printf '@echo off\r\n%s > OUT.TXT\r\nexit\r\n' $EXE > RUN.BAT
printf '[sdl]\noutput=surface\n[dosbox]\nmemsize=16\n[cpu]\ncore=normal\ncputype=pentium_slow\ncycles=max\n[mixer]\nnosound=true\n[speaker]\npcspeaker=false\n[autoexec]\n' > dosbox.conf
timeout 100 dosbox -conf dosbox.conf -c "mount c $d" -c c: -c run.bat -c exit >/dev/null 2>&1
cat OUT.TXT
grep -q PASS OUT.TXT
