package d_s_time

import (
	"time"
)

//json:json
type D []time.Time
