#!/bin/bash
# Regenerates the test certificates (committed; not run by the checks).
set -eu
cd "$(dirname "$0")"
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"; }
for n in ca badca leaf inter; do key $n; done
rm -rf /tmp/mcca; mkdir /tmp/mcca
cat > /tmp/mcca/c.cnf <<E
[ca]
default_ca=d
[d]
dir=/tmp/mcca
database=/tmp/mcca/index.txt
new_certs_dir=/tmp/mcca
serial=/tmp/mcca/serial
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[v3ca]
basicConstraints=critical,CA:TRUE
keyUsage=keyCertSign,cRLSign
subjectKeyIdentifier=hash
[good]
basicConstraints=CA:FALSE
subjectAltName=DNS:mail.test,DNS:mail2.test,DNS:mail3.test
[other]
basicConstraints=CA:FALSE
subjectAltName=DNS:other.test
[sanother]
basicConstraints=CA:FALSE
subjectAltName=DNS:other.test
[clientonly]
basicConstraints=CA:FALSE
extendedKeyUsage=clientAuth
subjectAltName=DNS:mail.test,DNS:mail2.test,DNS:mail3.test
[wild]
basicConstraints=CA:FALSE
subjectAltName=DNS:*.mail.test
[ip]
basicConstraints=CA:FALSE
subjectAltName=IP:10.0.1.12,DNS:other.test
[req]
distinguished_name=dn
[dn]
E
touch /tmp/mcca/index.txt; echo 01 > /tmp/mcca/serial
mk() { # out cn ext start end signer|self
  openssl req -new -config /tmp/mcca/c.cnf -key $7.key -subj "/CN=$2" -out /tmp/mcca/r.csr
  if [ "$6" = self ]; then
    openssl ca -batch -config /tmp/mcca/c.cnf -selfsign -keyfile $7.key -in /tmp/mcca/r.csr -extensions $3 -startdate $4 -enddate $5 -notext -out $1.pem 2>/dev/null
  else
    openssl ca -batch -config /tmp/mcca/c.cnf -cert $6.pem -keyfile $6.key -in /tmp/mcca/r.csr -extensions $3 -startdate $4 -enddate $5 -notext -out $1.pem 2>/dev/null
  fi
}
A=20000101000000Z; Z=20900101000000Z
mk ca "Test Root" v3ca $A $Z self ca
mk badca "Unknown Root" v3ca $A $Z self badca
mk good mail.test good $A $Z ca leaf
mk self mail.test good $A $Z self leaf
mk unknownca mail.test good $A $Z badca leaf
mk expired mail.test good $A 20010101000000Z ca leaf
mk notyet mail.test good 20850101000000Z $Z ca leaf
mk wronghost other.test other $A $Z ca leaf
mk selfwrong other.test other $A $Z self leaf
mk selfexpired mail.test good $A 20010101000000Z self leaf
mk sanother mail.test sanother $A $Z ca leaf
mk clientonly mail.test clientonly $A $Z ca leaf
mk inter "Test Intermediate" v3ca $A $Z ca inter
mk interexpired "Test Intermediate" v3ca $A 20010101000000Z ca inter
mk nonca "Test Intermediate" good $A $Z ca inter
mk viainter mail.test good $A $Z inter leaf
mk wild whatever.test wild $A $Z ca leaf
mk ip whatever.test ip $A $Z ca leaf
mk ipname 10.0.1.12 other $A $Z ca leaf
rm -rf /tmp/mcca
rm -f ca.key badca.key inter.key
