// -*- C -*-
// Copyright 2009-2026 NTESS. Under the terms
// of Contract DE-NA0003525 with NTESS, the U.S.
// Government retains certain rights in this software.
//
// Copyright (c) 2009-2026, NTESS
// All rights reserved.
//
// This file is part of the SST software package. For license
// information, see the LICENSE file in the top level directory of the
// distribution.
//
// DO NOT EDIT BUILD_INFO.H!
// It is automatically generated from build_info.h.in
//
// Parameters which can change from run to run based on configure
// arguments, but which do not require a full rebuild (such as
// installation directory) are set in this file.
//

#ifndef SST_BUILD_INFO_H
#define SST_BUILD_INFO_H

#endif
