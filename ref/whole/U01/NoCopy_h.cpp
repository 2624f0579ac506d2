// What the functions of this unit compute.
#ifndef UTILS_NO_COPY_H
#define UTILS_NO_COPY_H
class NoCopy
{
protected:
//= NoCopy::NoCopy
    NoCopy() {}
//END
private:
    NoCopy(const NoCopy&);
    NoCopy& operator =(const NoCopy&);
};
#endif
