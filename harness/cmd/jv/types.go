package main

import (
	_ "verif/harness/types/d1"
	_ "verif/harness/types/d2"
	_ "verif/harness/types/dbad"
	_ "verif/harness/types/gbad"
	_ "verif/harness/types/gdir"
	_ "verif/harness/types/gptr"
	_ "verif/harness/types/n1/shape"
	_ "verif/harness/types/n2/shape"
	_ "verif/harness/types/n3/shape"
	_ "verif/harness/types/n4"
)
