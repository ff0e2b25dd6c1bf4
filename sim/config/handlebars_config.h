/* src/handlebars_config.h.  Generated from handlebars_config.h.in by configure.  */
/**
 * Copyright (c) anno Domini nostri Jesu Christi MMXVI-MMXXIV John Boehr & contributors
 *
 * This library is free software; you can redistribute it and/or
 * modify it under the terms of the GNU Lesser General Public
 * License as published by the Free Software Foundation; either
 * version 2.1 of the License, or (at your option) any later version.
 *
 * This library is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
 * Lesser General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public
 * License along with this library; if not, see <http://www.gnu.org/licenses/>.
 */

#ifndef HANDLEBARS_CONFIG_H
#define HANDLEBARS_CONFIG_H

#ifndef HANDLEBARS_VERSION_MAJOR
#define HANDLEBARS_VERSION_MAJOR 1
#endif

#ifndef HANDLEBARS_VERSION_MINOR
#define HANDLEBARS_VERSION_MINOR 0
#endif

#ifndef HANDLEBARS_VERSION_PATCH
#define HANDLEBARS_VERSION_PATCH 0
#endif

#ifndef HANDLEBARS_VERSION_STRING
#define HANDLEBARS_VERSION_STRING "1.0.0"
#endif

#ifndef HANDLEBARS_VERSION_INT
#define HANDLEBARS_VERSION_INT (0 + 0 * 100 + 1 * 10000)
#endif

/* Disable refcounting of handlebars values */
#ifndef HANDLEBARS_NO_REFCOUNT
/* #undef HANDLEBARS_NO_REFCOUNT */
#endif

/* Enable handlebars memory testing functions */
#ifndef HANDLEBARS_MEMORY
#define HANDLEBARS_MEMORY 1
#endif

/* Enable JSON support */
#ifndef HANDLEBARS_HAVE_JSON
#define HANDLEBARS_HAVE_JSON 1
#endif

/* Enable LMDB support */
#ifndef HANDLEBARS_HAVE_LMDB
#define HANDLEBARS_HAVE_LMDB 1
#endif

/* Enable PCRE support */
#ifndef HANDLEBARS_HAVE_PCRE
#define HANDLEBARS_HAVE_PCRE 1
#endif

/* Enable pthread support */
#ifndef HANDLEBARS_HAVE_PTHREAD
#define HANDLEBARS_HAVE_PTHREAD 1
#endif

/* Enable YAML support */
#ifndef HANDLEBARS_HAVE_YAML
#define HANDLEBARS_HAVE_YAML 1
#endif

/* Enable handlebars debugging */
#ifndef HANDLEBARS_ENABLE_DEBUG
/* #undef HANDLEBARS_ENABLE_DEBUG */
#endif

#endif
