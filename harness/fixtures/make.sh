#!/bin/bash
# makes the certificates used by the TLS checks (already committed; needs only openssl)
set -e
cd "$(dirname "$0")"
mkdir -p work && touch work/index && echo 1001 > work/serial
conf() { # extensions
cat > work/cnf <<C
[ca]
default_ca=d
[d]
database=work/index
new_certs_dir=work
serial=work/serial
unique_subject=no
default_md=sha256
policy=p
x509_extensions=e
[p]
commonName=supplied
[e]
$1
C
}
key() { openssl req -new -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -keyout work/$1.key -out work/$1.csr -subj "/CN=$1" 2>/dev/null; }
ca() {
  key $1
  conf "basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash"
  openssl ca -batch -config work/cnf -selfsign -keyfile work/$1.key -in work/$1.csr -out $1.pem -startdate 20000101000000Z -enddate 21500101000000Z -notext 2>/dev/null
}
leaf() { # name ca san end
  key $1
  conf "subjectAltName=$3
basicConstraints=critical,CA:FALSE
extendedKeyUsage=serverAuth"
  openssl ca -batch -config work/cnf -cert $2.pem -keyfile work/$2.key -in work/$1.csr -out $1.pem -startdate 20000101000000Z -enddate $4 -notext 2>/dev/null
  openssl pkcs12 -export -inkey work/$1.key -in $1.pem -certfile $2.pem -out $1.p12 -passout pass:x
}
ca trusted; ca other
leaf good trusted DNS:localhost,IP:127.0.0.1 21500101000000Z
leaf name trusted DNS:localhost 21500101000000Z
leaf addr trusted IP:127.0.0.1 21500101000000Z
leaf wrong trusted DNS:elsewhere.test,IP:127.9.9.9 21500101000000Z
leaf untrusted other DNS:localhost,IP:127.0.0.1 21500101000000Z
leaf expired trusted DNS:localhost,IP:127.0.0.1 20010101000000Z
rm -f work/*; rmdir work; chmod 644 ./*.p12
