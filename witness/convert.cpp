// How a level hands out a value: type().convert(pointer into the storage, result), for every element type and
// every query type.  The analysis looks at which function each of these calls means.
#include "types/basictype.h"
#include "types/arraytype.h"
#include "types/structtype.h"

namespace witness {

template<class T, class B> void use(T &type, const unsigned char *data, B *buf)
{
	type.convert(data, buf);
}

template<class T> unsigned int size(T &type)
{
	return type.T::size();
}

template<class T> void all(T &type, const unsigned char *data)
{
	size(type);
	use(type, data, static_cast<unsigned char*>(0L));
	use(type, data, static_cast<int*>(0L));
	use(type, data, static_cast<long*>(0L));
	use(type, data, static_cast<float*>(0L));
	use(type, data, static_cast<double*>(0L));
	use(type, data, static_cast<void*>(0L));
}

template<class T> void each(const unsigned char *data, types::Type *type)
{
	all(*static_cast<types::BasicType<T>*>(type), data);
	all(*static_cast<types::ArrayType<T>*>(type), data);
	all(*static_cast<types::StructType<T>*>(type), data);
}

void everything(const unsigned char *data, types::Type *type)
{
	each<unsigned char>(data, type);
	each<int>(data, type);
	each<long>(data, type);
	each<float>(data, type);
	each<double>(data, type);
}

}
