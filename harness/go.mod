module github.com/nginxinc/nginx-go-crossplane/verif
go 1.23
require github.com/nginxinc/nginx-go-crossplane v0.0.0
require pgregory.net/rapid v1.3.0
replace github.com/nginxinc/nginx-go-crossplane => /repo
