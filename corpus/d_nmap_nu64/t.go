package d_nmap_nu64

//json:json
type D map[NStr]NU64

type NStr string

type NU64 uint64
