package main

import "fmt"
import "os"

var debugLoops = os.Getenv("VGO_LOOPS") != ""

func dumpVal(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Seq:
		s := fmt.Sprintf("seq(n=%v org=%v zero=%v", x.n, x.org, x.zero)
		for _, o := range x.over {
			s += fmt.Sprintf(" [%v fill=%v]=%s", o.i, o.fill, dumpVal(o.v))
		}
		return s + ")"
	case *ErrV:
		return fmt.Sprintf("err(nil=%v org=%v %s)", x.nil_, x.org, x.desc)
	}
	return fmt.Sprintf("%T", v)
}
