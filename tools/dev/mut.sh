# usage: mut.sh PROP file sedexpr
cd /repo && sed -i "$3" $2 && git diff --stat && (cd /verif && python3 checks/check.py $1 | cut -c1-300 | tail -${4:-4}); git -C /repo checkout -- .
