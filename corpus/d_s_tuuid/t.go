package d_s_tuuid

import (
	"github.com/google/uuid"
)

//json:json
type D []TUUID

//json:json
type TUUID uuid.UUID
