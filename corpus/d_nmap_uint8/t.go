package d_nmap_uint8

//json:json
type D map[NStr]uint8

type NStr string
