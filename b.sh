cd /verif/govc && GOTOOLCHAIN=local /opt/veriftools/go1.27.3/bin/go build -o /tmp/g . && cd /verif && . /opt/vp/env.sh && time timeout ${T:-600} /tmp/g debug "$@" 2>&1 | cut -c1-${W:-600} | head -${N:-80}
