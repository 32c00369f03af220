# dev helper: . lib/dev.sh; builds and leaves $HARNESS set
VERIF=/verif; . /verif/lib/env.sh; verif_build X
