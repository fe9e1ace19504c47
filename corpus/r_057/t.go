package r57

// T57 is documented.
//
//json:json
type T57 struct {
	Host *NU64           `json:"host"`
	Note map[NStr]uint32 `json:"err,required"`
}

type NStr string

type NU64 uint64
