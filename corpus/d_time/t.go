package d_time

import (
	"time"
)

//json:json
type D time.Time
