rm -f /tmp/b/.src /tmp/b/.dist; /verif/mc/build.sh /tmp/b ${1:-explore-src}
