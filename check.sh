#!/bin/bash
# check.sh ID quick|thorough: decides one property on /repo's working tree.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
# Exit 2: no verdict (the checker could not be built, or itself failed).
. "$(dirname "$0")/tools/env.sh"
ID=$1
TIER=${2:-quick}
shift; shift
no_evidence() {
	python3 - "$ID" "$TIER" "$1" >"$V/evidence/$ID.json" <<'PY'
import json, sys, os
print(json.dumps({"property": sys.argv[1], "tier": sys.argv[2], "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False,
               "notes": sys.argv[3]}, "wall_s": 0, "violations": 0}))
PY
}
mkdir -p "$V/evidence"
rm -f "$V/evidence/$ID.json"
run=$(mktemp -d "$B/run.XXXXXX") || exit 2
trap 'rm -rf "$run"' EXIT
partial=""
(
	flock 9
	prepare
	case " C10 C12 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24 " in
	*" $ID "*)
		# calls one after the other in the plain build, schedules in the instrumented one
		build_plain "$run/mc" && {
			build_inst "$run/sched" full || {
				echo "retrying without memory access instrumentation" >&2
				build_inst "$run/sched" sync && echo "built with synchronisation instrumented, memory accesses not" >"$run/partial"
			} || echo "schedules not explored: the instrumented build failed" >"$run/partial"
		}
		;;
	*)
		build_inst "$run/mc" full || {
			echo "retrying without memory access instrumentation" >&2
			build_inst "$run/mc" sync && echo "built with synchronisation instrumented, memory accesses not" >"$run/partial"
		}
		;;
	esac
) 9>"$B/lock" 2>"$run/build.log"
cat "$run/build.log" >&2
if [ ! -x "$run/mc" ]; then
	echo "cannot build the checker for $ID from this tree; nothing explored"
	no_evidence "the checker could not be built: $(tail -c 2000 "$run/build.log")"
	exit 2
fi
[ -f "$run/partial" ] && partial=$(cat "$run/partial")
sched=()
case " C10 C12 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24 " in
*" $ID "*)
	sched=(-mc.sched -)
	[ -x "$run/sched" ] && sched=(-mc.sched "$run/sched")
	;;
esac
"$run/mc" "${sched[@]}" -mc.tier "$TIER" -mc.verif "$V" -mc.partial "$partial" "$@" "$ID"
rc=$?
case $rc in
0 | 1) ;;
*)
	# the explorer itself failed: no verdict, and no claim of coverage either
	echo "explorer ended with status $rc; no verdict"
	[ -f "$V/evidence/$ID.json" ] || no_evidence "the explorer ended with status $rc"
	rc=2
	;;
esac
exit $rc
