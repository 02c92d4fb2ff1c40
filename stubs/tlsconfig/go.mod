module code.cloudfoundry.org/tlsconfig

go 1.18
