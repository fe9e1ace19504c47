package d_s_a3_time

import (
	"time"
)

//json:json
type D [][3]time.Time
