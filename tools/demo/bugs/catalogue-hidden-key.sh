# a product whose key in the catalogue is empty is indexed like any other
catalogue > test.json
timeout 60 "$indexer" || exit 1
cp out.test before
sed -i 's/^{"a"/{""/' test.json
grep -q '^{"":' test.json || exit 2
timeout 60 "$indexer" || exit 1
# one product only: the files are as long
[ "$(stat -c %s before)" = "$(stat -c %s out.test)" ]
