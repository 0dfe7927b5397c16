# writing to a full device ends the program with an error
catalogue > test.json
timeout 60 "$indexer" || exit 1
rm out.test
ln -s /dev/full out.test
timeout 60 "$indexer" 2> /dev/null && exit 1
exit 0
