#!/bin/bash
# mkoverlay.sh REPO OUT: an overlay file that lays the falsifier into REPO/zzfalsify
d=$(cd "$(dirname "$0")" && pwd)
{
 echo '{"Replace":{'
 s=""
 for f in "$d"/*_test.go; do printf '%s"%s/zzfalsify/%s":"%s"' "$s" "$1" "$(basename "$f")" "$f"; s=","; done
 echo '}}'
} > "$2"
