package d_nmap_uint32

//json:json
type D map[NStr]uint32

type NStr string
