package d_nmap_uint

//json:json
type D map[NStr]uint

type NStr string
