#!/bin/bash
# Writes the test certificates of pbt/certs (already committed; valid for 100 years).
set -e
cd "$(dirname "$0")/../pbt/certs"
D="-days 36500 -sha256"
ca() {
  openssl req -x509 -newkey rsa:2048 -nodes $D -keyout $1.key -out $1.pem -subj "/CN=subsetter test $1" \
    -addext "basicConstraints=critical,CA:TRUE" -addext "keyUsage=critical,keyCertSign,cRLSign" 2>/dev/null
}
leaf() { # name ca CN SAN usage
  openssl req -newkey rsa:2048 -nodes -keyout $1.key -out $1.csr -subj "/CN=$3" 2>/dev/null
  { echo "basicConstraints=critical,CA:FALSE"; echo "keyUsage=critical,digitalSignature,keyEncipherment"; echo "extendedKeyUsage=$5"; [ -z "$4" ] || echo "subjectAltName=$4"; } >$1.ext
  openssl x509 -req -in $1.csr -CA $2.pem -CAkey $2.key -set_serial 0x$(openssl rand -hex 8) $D -extfile $1.ext -out $1.pem 2>/dev/null
  unlink $1.csr; unlink $1.ext
}
ca ca1; ca ca2
leaf match ca1 localhost "DNS:localhost,IP:127.0.0.1" serverAuth
leaf other ca1 db.example.org "DNS:db.example.org,IP:192.0.2.7" serverAuth
leaf local ca1 localhost "DNS:localhost" serverAuth
leaf foreign ca2 localhost "DNS:localhost,IP:127.0.0.1" serverAuth
leaf client1 ca1 vtclient "" clientAuth
leaf client2 ca2 vtclient "" clientAuth
cat ca1.pem ca2.pem >both.pem
cat client1.pem client1.key >client1all.pem
