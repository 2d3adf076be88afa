// Package all links every contract package into the registry.
package all

import (
	_ "vf/cconv"
	_ "vf/cdec"
	_ "vf/cevent"
	_ "vf/cfuncs"
	_ "vf/cio"
	_ "vf/cjson"
	_ "vf/citer"
	_ "vf/cmath"
	_ "vf/crest"
	_ "vf/cstream"
	_ "vf/cunion"
)
