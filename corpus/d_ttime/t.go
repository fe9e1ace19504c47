package d_ttime

import (
	"time"
)

//json:json
type D TTime

//json:json
type TTime time.Time
