package d_nmap_nu8

//json:json
type D map[NStr]NU8

type NStr string

type NU8 uint8
