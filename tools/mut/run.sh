#!/bin/bash
# run.sh FILE SEED N WORKERS OUT: N random mutants of a Go file of /repo; prints those
# which neither the scan nor the tests find.
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off LC_ALL=C.UTF-8 VERIF_ROOT=/verif REPO=/repo
file=$1 seed=$2 n=$3 workers=$4 out=$5
tmp=$(mktemp -d /tmp/mutXXXXXX); trap 'rm -rf "$tmp"' EXIT
go build -o $tmp/mutate /verif/tools/mut/mutate.go || exit 2
$tmp/mutate /repo/$file list > $tmp/list
awk -F'\t' -v m=${MAXLINE:-999999} '$2<m' $tmp/list | shuf -n $n --random-source=<(yes $seed) | cut -f1 > $tmp/ks
one() {
	k=$1; d=$tmp/$k; mkdir $d
	$tmp/mutate /repo/$file $k > $d/m.go
	echo "{\"Replace\": {\"/repo/$file\": \"$d/m.go\"}}" > $d/o.json
	what=$(sed -n "$((k+1))p" $tmp/list)
	if (cd /verif/mc && go build -overlay $d/o.json -o $d/mc ./cmd/mc) 2> /dev/null; then
		ulimit -v 12000000
		for s in ${STRIDES:-61 7}; do
			r=$(timeout 1500 $d/mc -scan $s ${CHECKS:-C02 C03 C04 C07 C08 C09 C10 C11 C18 C19 C20 C05 C22} 2>&1); rc=$?
			[ $rc = 0 ] || break
		done
		if [ $rc = 0 ]; then
			t=killed
			(cd /repo && timeout 200 go test -overlay $d/o.json ./... > $d/t 2>&1 && t=survives; echo $t > $d/v)
			echo "SURVIVOR tests=$(cat $d/v) $what"
		else
			w=killed; [ $rc = 124 ] && w=TIMEOUT
			echo "$w $rc $(echo "$r" | grep -a SCAN | head -1 | cut -c1-90) -- $what"
		fi
	else
		echo "nobuild $what"
	fi
	rm -rf $d
}
export -f one; export tmp file MUTGUARD
xargs -P $workers -I{} bash -c 'one {}' < $tmp/ks > $out 2>&1
