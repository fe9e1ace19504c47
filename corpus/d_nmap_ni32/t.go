package d_nmap_ni32

//json:json
type D map[NStr]NI32

type NStr string

type NI32 int32
