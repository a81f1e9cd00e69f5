module vrt

go 1.27
