# try.sh ID [seconds]: builds, tests, demos and checks /tmp/plant/out/ID in scratch copies of /repo and /verif
ID=$1; SEC=${2:-30}; D=/tmp/plant/out/$ID
W=/tmp/plant/r.$ID; V=/tmp/plant/v.$ID
mkdir -p $W $V; cp -a /repo/. $W/; cp -a /verif/check.sh /verif/sim /verif/known-findings.txt $V/
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export D SEC PROP ID
unshare -m bash -c '
mount --bind '$W' /repo; mount --bind '$V' /verif
cd /repo
bash /opt/vp/build.sh >/tmp/plant/$ID.log 2>&1 || { echo "$ID NOBUILD"; exit; }
bash $D/demo.sh > /tmp/plant/$ID.demo0 2>&1; d0=$?
git apply $D/patch.diff || { echo "$ID NOAPPLY"; exit; }
bash /opt/vp/build.sh >/tmp/plant/$ID.log 2>&1 || { echo "$ID NOBUILD"; tail -5 /tmp/plant/$ID.log; exit; }
bash $D/demo.sh > /tmp/plant/$ID.demo1 2>&1; d1=$?
bash /opt/vp/test.sh /tmp/plant/$ID.json >/tmp/plant/$ID.log 2>&1
t=$(python3 -c "
import json
o=json.load(open(\"/tmp/plant/$ID.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
print(len(o[\"passed\"]), o[\"failed\"])")
cd /verif; s=$(date +%s.%N)
LBSIM_QUICK=$SEC VERIF_SEED=1 bash check.sh $PROP quick > /tmp/plant/$ID.check 2>&1; c=$?
e=$(date +%s.%N)
echo "$ID $PROP clean-demo=$d0 bug-demo=$d1 tests=$t check=$c $(python3 -c "print(round($e-$s,1))")s $(grep -m1 -v "^build" /tmp/plant/$ID.check | cut -c1-230)"
[ $c = 1 ] && cp replays/*.replay /tmp/plant/$ID.replay 2>/dev/null
'
rm -rf /tmp/plant/r.$ID /tmp/plant/v.$ID
