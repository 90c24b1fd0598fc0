#!/bin/bash
# check.sh <property> [args of the check binary]: build from /repo's working tree and run one check.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
P="$1"; shift
case "$P" in
  C05|C06|C07|C11|C13|C14) BIN=core_checks ;;
  C08) BIN=c08_checks ;;
  C09) BIN=c09_checks ;;
  C10) BIN=c10_checks ;;
  C12) BIN=c12_checks ;;
  C01|C02|C03|C04) BIN=red_checks ;;
  C15) BIN=c15_checks ;;
  C16) BIN=c16_checks ;;
  C17) BIN=c17_checks ;;
  C18) BIN=c18_checks ;;
  R07) BIN=r07_checks ;;
  R0*) BIN=rips_checks ;;
  G0*) BIN=grpph_checks ;;
  *) echo "unknown property $P" >&2; exit 2 ;;
esac
. "$HERE/env.sh"
pbt_build "$BIN" || { echo "build of $BIN failed" >&2; exit 2; }
case "$P" in
  R06) pbt_build_cli || { echo "build of the command line failed" >&2; exit 2; } ;;
esac
ulimit -v 26000000 2>/dev/null
exec "$PBT_TARGET/debug/$BIN" "$P" "$@"
