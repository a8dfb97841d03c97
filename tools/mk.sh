mk () 
{ 
    mkdir -p seeded/$1;
    cp tools/demo/demo.sh seeded/$1/
}
mkpatch () 
{ 
    d=$(mktemp -d /tmp/mk.XXXX);
    git clone -q /repo $d/r;
    ( cd $d/r && python3 - && git diff > /verif/seeded/$1/patch.diff );
    rm -rf $d;
    wc -l seeded/$1/patch.diff
}
