package d_nmap_ni8

//json:json
type D map[NStr]NI8

type NStr string

type NI8 int8
