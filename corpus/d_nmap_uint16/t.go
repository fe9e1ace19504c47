package d_nmap_uint16

//json:json
type D map[NStr]uint16

type NStr string
