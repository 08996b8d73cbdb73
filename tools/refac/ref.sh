# ref.sh TRANSFORM : run all rules on the transformed tree
cd /verif
t=$1; shift
d=/tmp/w/rf_$t
python3-vt $(dirname "$0")/refac.py $d $t || exit
mkdir -p /tmp/w/ev_$t
for c in ${@:-$(ls sa/rules/c*.py | sed 's/.*c\([0-9]*\).py/\1/')}; do ( VERIF_EVIDENCE=/tmp/w/ev_$t VERIF_REPO=$d timeout 900 python3-vt check.py --property C$c --tier quick > /tmp/w/ev_$t/out.$c 2>&1; rc=$?; [ $rc != 0 ] && { echo "$t C$c rc=$rc"; grep -i "violated\|undecided \|BROKEN\|Error" /tmp/w/ev_$t/out.$c | grep -v "^property" | cut -c1-260 | head -4; } ) & 
while [ $(jobs -r | wc -l) -ge 7 ]; do sleep .1; done
done; wait
