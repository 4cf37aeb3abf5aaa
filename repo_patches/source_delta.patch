From adae349229ef9f24f87d24ea7cb7ce4ace5f73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 01/25] fix: a poller could not be constructed (packet type
 constant looked up on the wrong class)

---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From aed52f77160d13aaea473be5dd7a415e729233bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 02/25] fix: communicate in bytes over IP so that instructions
 and replies work in Python 3

---
 weatherlink/serial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..e479448 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,9 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			# Instructions are text, but sockets only accept binary data in Python 3
+			data = data.encode('ascii')
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
@@ -220,7 +223,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From f0763e9fa483590de35dfe55d523c33ed765dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 03/25] fix: raise AcknowledgmentError instead of IndexError
 when the console closes the link before answering

---
 weatherlink/serial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index e479448..2c83841 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -111,8 +111,13 @@ class SerialCommunicator(object):
 
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
 		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
+		:raises AcknowledgmentError: If the channel was closed before any byte could be read
 		"""
-		ack = self._read_data(1)[0]
+		data = self._read_data(1)
+		if not data:
+			raise AcknowledgmentError('Connection closed while waiting for acknowledgement.')
+
+		ack = data[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From ad69963857d3efe55a868ff7916603ae46df1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 04/25] fix: confirm that the console accepted the data of a
 configuration write

---
 weatherlink/serial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 2c83841..ff8d9fc 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -325,6 +325,9 @@ class ConfigurationSettingMixin(SerialCommunicator):
 
 		self._send_data(data)
 
+		# The console acknowledges the data itself, too, once it has verified the CRC and stored the setting
+		self.confirm_ack()
+
 	def read_setup_bit(self, mask):
 		"""
 		Reads the 8 setup bits (1 byte) from the weather console and masks it with the given mask, returning the
-- 
2.43.0


From 02bd3071254e3de4c4fe5685206ac5e4f045a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 05/25] fix: never return a truncated configuration setting (an
 empty response passed the CRC check)

---
 weatherlink/serial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index ff8d9fc..55bce2f 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -278,8 +278,13 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		"""
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
+		expected_length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			setting = handle.read(expected_length)
+
+		if len(setting) != expected_length:
+			# A truncated response could otherwise pass the CRC (an empty one, for example, always does)
+			raise IOError('Expected %s bytes in response, received %s instead.' % (expected_length, repr(setting)))
 
 		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
-- 
2.43.0


From e21cf61a41ffe418b7ce3b8e9840282b5b196a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 06/25] fix: allow polling again after background polling
 stopped, finished, or failed to start

---
 weatherlink/poller.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..fc32665 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,16 +44,28 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._receive_loop_packets_in_background, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
-		if not self._stop_event:
+		stop_event = self._stop_event  # the background thread clears the attribute when it finishes
+		if not stop_event:
 			raise ValueError('Cannot stop background polling when not running.')
 
-		self._stop_event.set()
+		stop_event.set()
+
+	def _receive_loop_packets_in_background(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			# Background polling is no longer running, so it may be started again
+			self._stop_event = None
 
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
-- 
2.43.0


From a52de40d3da92e25fd236269c13a53dd83ffe0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 07/25] fix: end the connection on disconnect even while
 background polling holds a file handle

---
 weatherlink/serial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 55bce2f..c58b449 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,12 @@ class SerialIPCommunicator(SerialCommunicator):
 			raise ValueError('Cannot disconnect when not connected.')
 
 		try:
+			try:
+				# Closing alone does not end the connection while a file handle (background polling) is still open
+				self._socket.shutdown(socket.SHUT_RDWR)
+			except socket.error:
+				# This just means the connection is already gone or was never established
+				pass
 			self._socket.close()
 		finally:
 			self._socket = None
-- 
2.43.0


From 87af17c5e11a552b969aa8821ec2c965752f2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 08/25] fix: quote the credentials in the download URL

---
 weatherlink/downloader.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..a30769b 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import
 
 import requests
+import six
+from six.moves.urllib.parse import quote
 
 from weatherlink.models import (
 	ArchiveIntervalRecord,
@@ -11,6 +13,13 @@ from weatherlink.models import (
 _requests_session = requests.Session()
 
 
+def _quote(value):
+	# Credentials may contain characters that have a special meaning in URLs
+	if isinstance(value, six.text_type):
+		value = value.encode('utf-8')
+	return quote(value, safe='')
+
+
 class Downloader(object):
 	WEATHER_LINK_URL = (
 		'https://api.weatherlink.com/webdl.php?'
@@ -39,9 +48,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=_quote(self.username),
+			password=_quote(self.password),
+			api_token=_quote(self.api_token),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +62,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=_quote(self.username),
+			password=_quote(self.password),
+			api_token=_quote(self.api_token),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From 846de7d24c9cd5d1603d3e689274c54fbf545750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 09/25] fix: Weather Underground updates failed on every value
 that was not a string

---
 weatherlink/exporter/wunderground.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..54fe6d5 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -135,20 +135,20 @@ class WundergroundExporter(object):
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-			self.station_id,
+			url_quote(self.station_id, safe=''),
 			url_quote(self.password, safe=''),
 			url_quote(d.strftime('%Y-%m-%d %H:%M:%S'), safe=''),
 		)
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From c50162de653ffde52690297d05a6829ab4f2bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 10/25] fix: the wind gust of rapid updates could not be
 determined in Python 3

---
 weatherlink/exporter/wunderground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 54fe6d5..bb69448 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -27,7 +27,7 @@ def _get_wind_gust(exporter, *_):
 
 		if record['wind_speed'] is not None:
 			old_gust = gust
-			gust = max(gust, record['wind_speed'])
+			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
 				gust_direction = record['wind_direction_degrees']
 
-- 
2.43.0


From a3234ce9089346f45e3404b39e3604c7d47dd158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 11/25] fix: a simple update failed when the outside
 temperature or humidity was absent

---
 weatherlink/exporter/wunderground.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index bb69448..ef15564 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -81,7 +81,11 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			# There is no dew point without a temperature and a humidity above zero
+			lambda e, r: (
+				weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
+				if r['temperature_outside'] is not None and r['humidity_outside'] else None
+			),
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From 98c834bd772d822032890c18b2987d7132d29b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 12/25] fix: Weather Underground updates were submitted with
 the local mean time offset of the station's time zone

---
 weatherlink/exporter/wunderground.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index ef15564..77b720d 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -134,8 +134,17 @@ class WundergroundExporter(object):
 	def station_time_zone(self, value):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
+	def _convert_to_utc(self, date):
+		time_zone = self.station_time_zone
+		if hasattr(time_zone, 'localize'):
+			# A pytz time zone given to `replace` would apply the historic local mean time of the location
+			date = time_zone.localize(date)
+		else:
+			date = date.replace(tzinfo=time_zone)
+		return date.astimezone(pytz.UTC).replace(tzinfo=None)
+
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = self._convert_to_utc(record.date)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-- 
2.43.0


From b53dddf7d87c6b2b82a543e02d9b37fccf941bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 13/25] fix: a rapid update failed after a simple update on the
 same exporter

---
 weatherlink/exporter/wunderground.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 77b720d..11b3433 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -124,6 +124,7 @@ class WundergroundExporter(object):
 		self._station_time_zone = self.DEFAULT_TIME_ZONE
 		self._session = requests.Session()
 
+		# The history of rapid updates (archive records, which cover whole intervals, have no place in it)
 		self.record_queue = collections.deque(maxlen=50)  # 34560 is a whole day, 50 is 2 minutes
 
 	@property
@@ -172,8 +173,6 @@ class WundergroundExporter(object):
 			raise AssertionError('Response "%s" unexpected' % response.text)
 
 	def send_simple_update(self, record):
-		self.record_queue.appendleft(record)
-
 		self._send_update(
 			self.URL_SIMPLE_UPDATE,
 			self.ATTRIBUTE_MAP_SIMPLE_UPDATE,
-- 
2.43.0


From 7b96b08c2b43d623091f66bb7121af6e089ef7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 14/25] fix: database files with an absent wind direction could
 not be imported

---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From 666bb547e25fec92ffa23429fce2eb727bb1c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 15/25] fix: exported records got a UTC time with the local
 mean time offset of the station's time zone

---
 weatherlink/exporter/mysql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..26962b5 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,13 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		time_zone = self.station_time_zone
+		if hasattr(time_zone, 'localize'):
+			# Passing a pytz time zone as tzinfo would apply its first known offset (local mean time)
+			d = time_zone.localize(record.date)
+		else:
+			d = record.date.replace(tzinfo=time_zone)
+		d = d.astimezone(pytz.UTC).replace(tzinfo=None)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
-- 
2.43.0


From 3a54db7420fb3b34874a7f7e119e1e528206eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 16/25] fix: temperatures of exactly zero degrees were treated
 as absent when deriving values

---
 weatherlink/utils.py | 60 ++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..eeb2aed 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -643,7 +643,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -668,29 +668,29 @@ def calculate_all_record_values(record):
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -702,45 +702,45 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if wind_speed or wind_speed_high:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -750,10 +750,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -762,7 +762,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -771,7 +771,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -780,7 +780,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -789,7 +789,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From 353a82b815a65404b8c66aaa2efb22b59d832efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 17/25] fix: current derived values were taken from the high or
 low temperature when there was no current one

---
 weatherlink/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index eeb2aed..fb20a46 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -694,11 +694,14 @@ def calculate_all_record_values(record):
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
-			arguments['dew_point_outside'] = a[0]
+			if temperature_outside is not None:
+				arguments['dew_point_outside'] = a[0]
 			arguments['dew_point_outside_low'] = min(a)
 			arguments['dew_point_outside_high'] = max(a)
 		if b:
-			arguments['heat_index_outside'] = b[0]
+			# The first value is the current one only if it was calculated from the current temperature
+			if temperature_outside is not None and temperature_outside >= HEAT_INDEX_THRESHOLD:
+				arguments['heat_index_outside'] = b[0]
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
@@ -725,7 +728,8 @@ def calculate_all_record_values(record):
 		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
-			arguments['wind_chill'] = a[0]
+			if wind_speed and temperature_outside is not None and temperature_outside <= WIND_CHILL_THRESHOLD:
+				arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
@@ -744,7 +748,8 @@ def calculate_all_record_values(record):
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
-			arguments['thw_index'] = a[0]
+			if temperature_outside is not None and temperature_outside >= HEAT_INDEX_THRESHOLD:
+				arguments['thw_index'] = a[0]
 			arguments['thw_index_low'] = min(a)
 			arguments['thw_index_high'] = max(a)
 
@@ -799,7 +804,8 @@ def calculate_all_record_values(record):
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, wsh),
 				)
 			if a:
-				arguments['thsw_index'] = a[0]
+				if temperature_outside is not None and solar_radiation:
+					arguments['thsw_index'] = a[0]
 				arguments['thsw_index_low'] = min(a)
 				arguments['thsw_index_high'] = max(a)
 
-- 
2.43.0


From c5133aaceef0d9d2fe55af43a0d2a65c863d85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 18/25] fix: the newest timestamp was looked up in the default
 table and column even if others were configured

---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 26962b5..c29dc10 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -750,5 +750,8 @@ class MySQLExporter(object):
 		return found_rain_events, ongoing_rain_events
 
 	def get_newest_timestamp(self):
-		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
+		statement = (
+			'SELECT max(' + self.archive_table_column_map['timestamp'] + ') FROM ' + self.archive_table_name + ';'
+		)
+		with self._get_cursor(statement, []) as cursor:
 			return cursor.fetchone()[0]
-- 
2.43.0


From 59ae004d9300ebc3b5a2486f87806a3d29e452bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 19/25] fix: a transaction left open by a read or a failure
 leaked into the next operation of the exporter

---
 weatherlink/exporter/mysql.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index c29dc10..3b46c6d 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -198,6 +198,18 @@ class MySQLExporter(object):
 				except:
 					if not exc:
 						raise
+				finally:
+					self._end_transaction()
+
+	def _end_transaction(self):
+		# If anything is left of the transaction, either it failed and must not be committed with the next operation, or
+		# it only read, and the next operation would be reading the database as it was before
+		# noinspection PyBroadException
+		try:
+			self._connection.rollback()
+		except Exception:
+			# The connection is lost, and the transaction with it
+			pass
 
 	def export_record(self, record):
 		argument_map = {}
-- 
2.43.0


From 7671f416558b70a322eed41ca8e4ca8bb6148075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 20/25] fix: summaries of days without any outside temperature
 could not be calculated

---
 weatherlink/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index fb20a46..3826bf4 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -507,7 +507,7 @@ def calculate_cooling_degree_days(average_temperature):
 
 	:return: The cooling degree days, or `None` if the average temperature was less than or equal to 65F
 	"""
-	if average_temperature <= DEGREE_DAYS_THRESHOLD:
+	if average_temperature is None or average_temperature <= DEGREE_DAYS_THRESHOLD:
 		return None
 	return average_temperature - DEGREE_DAYS_THRESHOLD
 
@@ -523,7 +523,7 @@ def calculate_heating_degree_days(average_temperature):
 
 	:return: The heating degree days, or `None` if the average temperature was greater than or equal to 65F
 	"""
-	if average_temperature >= DEGREE_DAYS_THRESHOLD:
+	if average_temperature is None or average_temperature >= DEGREE_DAYS_THRESHOLD:
 		return None
 	return DEGREE_DAYS_THRESHOLD - average_temperature
 
-- 
2.43.0


From 8e78b2f12e52743be52b00808c44b9213e578741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:27 +0000
Subject: [PATCH 21/25] fix: the average wind run of an earlier calculation was
 kept when there is none any more

---
 weatherlink/exporter/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 3b46c6d..837d685 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -665,12 +665,11 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	def find_new_rain_events(self):
 		found_rain_events = 0
-- 
2.43.0


From 9aaba63c9336eee34467b671e938c0e5b0f2f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 22/25] fix: summaries had no timestamp for extremes of exactly
 zero degrees

---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 837d685..356de26 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -488,6 +488,9 @@ class MySQLExporter(object):
 		(49, ('thsw_index_high', 'thsw_index_high', ), 'thsw_index_high_timestamp', ),
 	)
 
+	# Zero is a temperature like any other, but if there was no wind, rain, or sun, there is also no time for its high
+	TIMESTAMP_REQUIRES_NON_ZERO = frozenset({15, 19, 21, 24})
+
 	def _recalculate_summary_from_arguments(
 		self, cursor, where_clause, where_arguments, summary_type, year, month, week, day,
 		week_start=None, week_end=None,
@@ -552,7 +555,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None or (value == 0 and rule[0] in self.TIMESTAMP_REQUIRES_NON_ZERO):
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From 8ec717f7e150de13b082b7b6692ba460b3445853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 23/25] fix: summaries could not be calculated for archive
 intervals longer than ten minutes

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 356de26..b144197 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -324,7 +324,7 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor.fetchall())
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From ed44d8a0791e85d08edd2261a61022df2e9b9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 24/25] fix: rain events with more than a day of records at one
 minute each never ended and lost rain

---
 weatherlink/exporter/mysql.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index b144197..6bdcf38 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -706,14 +706,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._get_rain_after(cursor, start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
@@ -730,12 +723,6 @@ class MySQLExporter(object):
 					if old != event_max_rain_rate:
 						event_max_rate_time = timestamp_station
 
-				try:
-					cursor.fetchall()  # Fetch remaining rows to prevent an error.
-				except mysql.connector.errors.InterfaceError:
-					# This just means there were no remaining rows
-					pass
-
 				if (last_record - last_rain).total_seconds() < THREE_HOURS_IN_SECONDS:
 					# This is an ongoing rain event, so don't record the end yet.
 					last_rain = None
@@ -763,6 +750,21 @@ class MySQLExporter(object):
 
 		return found_rain_events, ongoing_rain_events
 
+	@staticmethod
+	def _get_rain_after(cursor, timestamp):
+		# At a 1-minute resolution (the max), 1440 records is a day. An event can take longer than that, so there can be
+		# more records to get, but most events will be over well before
+		while timestamp:
+			cursor.execute(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
+				[timestamp],
+			)
+			records = cursor.fetchall()
+			for record in records:
+				yield record
+			timestamp = records[-1][0] if len(records) == 1440 else None
+
 	def get_newest_timestamp(self):
 		statement = (
 			'SELECT max(' + self.archive_table_column_map['timestamp'] + ') FROM ' + self.archive_table_name + ';'
-- 
2.43.0


From 4a4e42b9ab3549e5b7af53a70daae367ee2977f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 25/25] fix: the time of day of a date no longer matters when
 recalculating its weekly summary

Given a moment with fractions of a second, the records of the first midnight of the week were left out of its summary;
given a plain date, recalculating raised TypeError.
---
 weatherlink/exporter/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 6bdcf38..43f43dc 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -353,7 +353,8 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0)
+		# Only the date matters: not even the microseconds of a time given with it may cut off the beginning of the week
+		week_start = datetime.datetime(date.year, date.month, date.day) - datetime.timedelta(days=week_day)
 		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
 
 		with self._get_cursor() as cursor:
-- 
2.43.0

