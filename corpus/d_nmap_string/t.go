package d_nmap_string

//json:json
type D map[NStr]string

type NStr string
