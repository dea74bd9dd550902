/*
 *  Fast Positive Tuples (libfptu), aka Позитивные Кортежи
 *  Copyright 2016-2020 Leonid Yuriev <leo@yuriev.ru>
 *
 *  Licensed under the Apache License, Version 2.0 (the "License");
 *  you may not use this file except in compliance with the License.
 *  You may obtain a copy of the License at
 *
 *      http://www.apache.org/licenses/LICENSE-2.0
 *
 *  Unless required by applicable law or agreed to in writing, software
 *  distributed under the License is distributed on an "AS IS" BASIS,
 *  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 *  See the License for the specific language governing permissions and
 *  limitations under the License.
 */

#define HAVE_MEMMEM
#define HAVE_MEMRCHR
/* #undef HAVE_UUIDGEN */
#define HAVE_UNISTD_H
#define HAVE_SYS_UIO_H
#define HAVE_SYS_STAT_H
#define HAVE_SYSTIME_H_TIMEVAL_TV_USEC
/* #undef HAVE_SYSSELECT_H_TIMEVAL_TV_USEC */
#define HAVE_TIMESPEC_TV_NSEC
/* #undef CMAKE_HAVE_PTHREAD_H */
#define HAVE_nanf
#define HAVE_nan
#define HAVE_IEEE754_H

/* #undef LTO_ENABLED */
/* #undef ENABLE_VALGRIND */
/* #undef ENABLE_GPROF */
/* #undef ENABLE_GCOV */
/* #undef ENABLE_ASAN */
#ifndef FPTU_BUILD_TYPE
/* #undef FPTU_BUILD_TYPE */
#endif

#define HAVE_FPTU_VERSIONINFO 0
#define FPTU_ENABLE_TESTS 1
