#!/bin/bash
# build.sh OUTDIR [what...]: builds the repository's sources (both targets) and the explorers into OUTDIR.
# what: explore-src explore-dist ...
set -eu
OUT=$1; shift
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
INC_src="-I$R -I$R/src -I$R/lib/EmbedDB-Utility -I$R/lib/Desktop-File-Interface"
INC_dist="-I$R/lib/Distribution -I$R/lib/Desktop-File-Interface"
RC="-g -O1 -U_FORTIFY_SOURCE -fno-pie -fno-common -w"
HX="-std=c++17 -O2 -g -fno-pie -w"
RED="--redefine-sym malloc=mc_malloc --redefine-sym calloc=mc_calloc --redefine-sym realloc=mc_realloc --redefine-sym free=mc_free --redefine-sym printf=mc_printf --redefine-sym puts=mc_puts --redefine-sym putchar=mc_putchar --rename-section .data=repo_data --rename-section .bss=repo_bss,alloc"
repo_obj() { # tag src flags
  gcc -c $RC $3 "$2" -o "$OUT/$1.o" && objcopy $RED "$OUT/$1.o"
}
repo_src() { local x=${1:-}; 
  repo_obj s_embedDB$x "$R/src/embedDB/embedDB.c" "$INC_src $EX"; repo_obj s_spline$x "$R/src/spline/spline.c" "$INC_src $EX"
  repo_obj s_util$x "$R/lib/EmbedDB-Utility/embedDBUtility.c" "$INC_src $EX"; repo_obj s_schema$x "$R/src/query-interface/schema.c" "$INC_src $EX"
  repo_obj s_adv$x "$R/src/query-interface/advancedQueries.c" "$INC_src $EX"
  ar rcs "$OUT/librepo_src$x.a.tmp$$" "$OUT"/s_{embedDB,spline,util,schema,adv}$x.o; mv -f "$OUT/librepo_src$x.a.tmp$$" "$OUT/librepo_src$x.a"; }
repo_dist() { local x=${1:-}; repo_obj d_embedDB$x "$R/lib/Distribution/embedDB.c" "$INC_dist -I$R/lib/EmbedDB-Utility -DPRINT_ERRORS $EX"; ar rcs "$OUT/librepo_dist$x.a.tmp$$" "$OUT/d_embedDB$x.o"; mv -f "$OUT/librepo_dist$x.a.tmp$$" "$OUT/librepo_dist$x.a"; }
repo_amalg() { # what the amalgamation script of the current tree makes of the current sources, in a copy
  rm -rf "$OUT/amalg.tmp"; mkdir -p "$OUT/amalg.tmp"; cp -r "$R/src" "$R/lib" "$R/amalgamation" "$OUT/amalg.tmp/"; rm -f "$OUT"/amalg.tmp/lib/Distribution/embedDB.*
  PYTHONDONTWRITEBYTECODE=1 python3 "$OUT/amalg.tmp/amalgamation/amalgamation.py"
  repo_obj a_embedDB "$OUT/amalg.tmp/lib/Distribution/embedDB.c" "-I$OUT/amalg.tmp/lib/Distribution -I$R/lib/Desktop-File-Interface -I$R/lib/EmbedDB-Utility -DPRINT_ERRORS"
  ar rcs "$OUT/librepo_amalg.a.tmp$$" "$OUT/a_embedDB.o"; mv -f "$OUT/librepo_amalg.a.tmp$$" "$OUT/librepo_amalg.a"; }
file_objs() { local t=$1 D=$2; local ST="-I$V/mc/stub -I$R/lib/Serial-Wrapper -I$R/lib/SD-Wrapper -I$R/lib/SD-File-Interface -I$R/lib/Dataflash-Wrapper -I$R/lib/Dataflash-File-Interface"
  local I="-I$R -I$R/src"; [ "$t" = dist ] && I="-I$R/lib/Distribution -I$R"
  local o
  gcc -c $RC $D $I -I$R/lib/Desktop-File-Interface "$R/lib/Desktop-File-Interface/desktopFileInterface.c" -o "$OUT/f_desk-$t.o"
  gcc -c $RC $D -DARDUINO $I $ST "$R/lib/SD-File-Interface/SDFileInterface.c" -o "$OUT/f_sd-$t.o"
  gcc -c $RC -I$R -I$R/src $ST "$R/lib/Dataflash-File-Interface/dataflashFileInterface.c" -o "$OUT/f_df-$t.o"
  g++ -c $RC -DARDUINO $ST "$R/lib/SD-Wrapper/sdcard_c_iface.cpp" -o "$OUT/f_sdw-$t.o"
  g++ -c $RC -DARDUINO $ST "$R/lib/Dataflash-Wrapper/dataflash_c_iface.cpp" -o "$OUT/f_dfw-$t.o"
  for o in desk sd df sdw dfw; do objcopy $RED --redefine-sym fopen=mc_fopen --redefine-sym fopen64=mc_fopen64 --redefine-sym _Znwm=mc_new --redefine-sym _ZdlPv=mc_delete --redefine-sym _ZdlPvm=mc_delete2 "$OUT/f_$o-$t.o"; done
  objcopy --keep-global-symbol=getFileInterface --keep-global-symbol=getMockEraseFileInterface --keep-global-symbol=setupFile --keep-global-symbol=tearDownFile "$OUT/f_desk-$t.o"
  objcopy --keep-global-symbol=getSDInterface --keep-global-symbol=setupSDFile --keep-global-symbol=tearDownSDFile "$OUT/f_sd-$t.o"; }
EX=""; rts=""
one() {  # prog-target: one explorer
  local w=$1 b=${1%-*} t=${1##*-} INC DEF LIB XO="" o
  if [ "$t" = src ]; then INC="$INC_src"; DEF=""; LIB="$OUT/librepo_src.a"
  elif [ "$t" = amalg ]; then INC="-I$OUT/amalg.tmp/lib/Distribution -I$R/lib/Desktop-File-Interface"; DEF="-DMC_DIST -DDIST"; LIB="$OUT/librepo_amalg.a"
  else INC="$INC_dist"; DEF="-DMC_DIST -DDIST"; LIB="$OUT/librepo_dist.a"; fi
  g++ $HX $DEF -I"$V/mc" $INC -c "$V/mc/$b.cpp" -o "$OUT/$w.o"
  if [ "$b" = filex ]; then file_objs $t "$DEF"; for o in desk sd df sdw dfw; do XO="$XO $OUT/f_$o-$t.o"; done; fi
  g++ -no-pie -g "$OUT/$w.o" "$OUT/rt-$t.o" $XO -Wl,--whole-archive "$LIB" -Wl,--no-whole-archive -lm -o "$OUT/$w"
}
for w in "$@"; do
  t=${w##*-}
  if [ "$t" = src ]; then [ -f "$OUT/.src" ] || { repo_src; touch "$OUT/.src"; }; INC="$INC_src"; DEF=""
  elif [ "$t" = amalg ]; then [ -f "$OUT/.amalg" ] || { repo_amalg; touch "$OUT/.amalg"; }; INC="-I$OUT/amalg.tmp/lib/Distribution -I$R/lib/Desktop-File-Interface"; DEF="-DMC_DIST -DDIST"
  else [ -f "$OUT/.dist" ] || { repo_dist; touch "$OUT/.dist"; }; INC="$INC_dist"; DEF="-DMC_DIST -DDIST"; fi
  case " $rts " in *" $t "*) ;; *) rts="$rts $t"; g++ $HX $DEF -I"$V/mc" $INC -c "$V/mc/rt.cpp" -o "$OUT/rt-$t.o" ;; esac
done
pids=""
for w in "$@"; do one $w & pids="$pids $!"; done
for p in $pids; do wait $p; done
