#!/bin/bash
# csuite.sh REPO SCHEME VARIANT [baseline]: PQClean's own test programs for one implementation, against the outputs of /repo
R=$1; S=$2; V=$3; P=$R/pqcrypto/pqclean
W=$(mktemp -d /tmp/csuite.XXXXXX); trap "rm -rf $W" EXIT
D=$P/crypto_sign/$S/$V
NS=PQCLEAN_$(echo ${S}_$V | tr a-z A-Z)_
A=; [ $V = avx2 ] && A="-mavx2 -mbmi -mpopcnt"
cd $W
for t in functest testvectors nistkat; do
  rnd="$P/common/randombytes.c"; x=
  [ $t = testvectors ] && rnd="$P/test/common/notrandombytes.c"
  [ $t = nistkat ] && rnd="$P/test/common/nistkatrng.c"
  san=; [ $t = functest ] && san="-fsanitize=address,undefined -fno-sanitize-recover"
  gcc -O1 -w -std=c99 $A $san -DPQCLEAN_NAMESPACE=$NS -DPQCLEAN_NAMESPACE=${NS%_} -I$P/common -I$P/test/common -I$D $P/test/crypto_sign/$t.c $D/*.[cS] $P/common/fips202.c $P/common/sha2.c $P/common/aes.c $P/common/nistseedexpander.c $P/common/sp800-185.c $rnd -o $t 2>$W/err || { head -3 $W/err; exit 3; }
  timeout 120 ./$t > $t.out 2>&1 || exit 4
done
cat testvectors.out nistkat.out | sha256sum
