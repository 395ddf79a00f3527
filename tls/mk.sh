#!/bin/bash
# regenerates the test certificates (virtual time of the simulation is November 2023)
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); cd "$W"
mkca() { # name cn
 mkdir -p $1.d; : > $1.d/index; echo 1000 > $1.d/serial; echo unique_subject=no > $1.d/index.attr
 cat > $1.cnf <<X
[ca]
default_ca=c
[c]
dir=$W/$1.d
new_certs_dir=$W/$1.d
database=$W/$1.d/index
serial=$W/$1.d/serial
private_key=$W/$1.key
certificate=$W/$1.crt
default_md=sha256
policy=p
copy_extensions=copy
unique_subject=no
[p]
commonName=supplied
[v3_ca]
basicConstraints=critical,CA:TRUE
keyUsage=keyCertSign,cRLSign
subjectKeyIdentifier=hash
[v3_ee]
basicConstraints=CA:FALSE
X
}
key() { openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt > $1.key 2>/dev/null; }
sign() { # ca name cn ext [san]
 key $2
 openssl req -new -key $2.key -subj "/CN=$3" ${5:+-addext "subjectAltName=$5"} -out $2.csr 2>/dev/null
 openssl ca -batch -notext -config $1.cnf -in $2.csr -out $2.crt -extensions $4 -startdate 20200101000000Z -enddate ${6:-20990101000000Z} 2>/dev/null
}
selfca() { mkca $1; key $1; openssl req -new -key $1.key -subj "/CN=$2" -out $1.csr 2>/dev/null
 openssl ca -batch -notext -selfsign -keyfile $1.key -config $1.cnf -in $1.csr -out $1.crt -extensions v3_ca -startdate 20200101000000Z -enddate 20990101000000Z 2>/dev/null; }
selfca ca "Test CA"; selfca ca2 "Other CA"
mkca int; sign ca int "Intermediate CA" v3_ca
sign ca srv "srv.example" v3_ee DNS:srv.example
sign ca a "a.example" v3_ee DNS:a.example
sign ca b "b.example" v3_ee DNS:b.example
sign ca w "w.example" v3_ee "DNS:*.w.example,DNS:w.example"
sign ca cli "client one" v3_ee
sign ca2 cli2 "client other" v3_ee
sign int cli3 "client deep" v3_ee
sign ca cliexp "client expired" v3_ee "" 20210101000000Z
key self; openssl req -new -x509 -key self.key -subj "/CN=client self" -days 36500 -out self0.crt 2>/dev/null
mkca self; openssl req -new -key self.key -subj "/CN=client self" -out self.csr 2>/dev/null
openssl ca -batch -notext -selfsign -keyfile self.key -config self.cnf -in self.csr -out self.crt -extensions v3_ee -startdate 20200101000000Z -enddate 20990101000000Z 2>/dev/null
for n in srv a b w cli cli2 cliexp self; do cat $n.key $n.crt > "$D/$n.pem"; done
cat cli3.key cli3.crt int.crt > "$D/cli3.pem"
cp ca.crt "$D/ca.crt"; cp ca2.crt "$D/ca2.crt"
rm -r "$W"
