# a readable catalogue gives an index file; an unreadable one afterwards leaves that file alone
catalogue > test.json
timeout 60 "$indexer" || exit 1
cp out.test before
catalogue ', "b": {"id": "2"}' > test.json
timeout 60 "$indexer" 2> /dev/null && exit 1
cmp -s before out.test
