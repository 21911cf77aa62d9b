package golisp

// vWalk: the part of d named by the letters path[0..i] (read from the right).
func vWalk(d *Data, path string, i int) *Data {
	if i < 0 {
		return d
	}
	if !vIsCons(d) {
		return nil
	}
	if path[i] == 'a' {
		return vWalk(vCar(d), path, i-1)
	}
	if path[i] == 'd' {
		return vWalk(vCdr(d), path, i-1)
	}
	return vWalk(nil, path, i-1)
}

//govc:pure
//govc:prop C02
func spec_WalkList(d *Data, path string) *Data { return vWalk(d, path, len(path)-1) }

func loop_WalkList(d *Data, path string, c *Data, index int) *Data { return vWalk(c, path, index) }

//govc:pure
//govc:prop C02
func spec_Caar(d *Data) *Data { return vCar(vCar(d)) }

//govc:pure
//govc:prop C02
func spec_Cadr(d *Data) *Data { return vCar(vCdr(d)) }

//govc:pure
//govc:prop C02
func spec_Cdar(d *Data) *Data { return vCdr(vCar(d)) }

//govc:pure
//govc:prop C02
func spec_Cddr(d *Data) *Data { return vCdr(vCdr(d)) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Caaar(d *Data) *Data { return vCar(vCar(vCar(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Caadr(d *Data) *Data { return vCar(vCar(vCdr(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Cadar(d *Data) *Data { return vCar(vCdr(vCar(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Caddr(d *Data) *Data { return vCar(vCdr(vCdr(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Cdaar(d *Data) *Data { return vCdr(vCar(vCar(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Cdadr(d *Data) *Data { return vCdr(vCar(vCdr(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Cddar(d *Data) *Data { return vCdr(vCdr(vCar(d))) }

//govc:pure
//govc:fuel 5
//govc:prop C02
func spec_Cdddr(d *Data) *Data { return vCdr(vCdr(vCdr(d))) }
