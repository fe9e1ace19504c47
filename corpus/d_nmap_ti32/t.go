package d_nmap_ti32

//json:json
type D map[NStr]TI32

type NStr string

//json:json
type TI32 int32
