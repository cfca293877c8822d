// The number type a translation unit is compiled for: VT_CT = 0, 1, 2
#pragma once
#ifndef VT_CT
#define VT_CT 0
#endif
#if VT_CT == 0
using ct = double;
#define CT_PART(ID, PART, RULE) PROPERTY_PART(ID, PART##_double, RULE)
#define CT_MAX(d, o) d
#elif VT_CT == 1
using ct = float;
#define CT_PART(ID, PART, RULE) PROPERTY_PART(ID, PART##_float, RULE)
#define CT_MAX(d, o) o
#else
using ct = long double;
#define CT_PART(ID, PART, RULE) PROPERTY_PART(ID, PART##_longdouble, RULE)
#define CT_MAX(d, o) o
#endif
