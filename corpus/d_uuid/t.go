package d_uuid

import (
	"github.com/google/uuid"
)

//json:json
type D uuid.UUID
