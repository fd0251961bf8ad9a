FE='serpent/src/front_end/frontend.cpp'; OP='serpent/src/back_end/optimisation.cpp'; GM='serpent/src/back_end/graph_manager.cpp'
BUGS=[
 dict(id='C01-opt-after-first', prop='C01', profile='c01', edits=[(OP,'if (features->header.stamp >= gm->timestamp("stereo", 1)) {','if (features->header.stamp >= gm->timestamp("stereo", 1) && gm->has_pose("stereo", 2)) {')],
  needs='stereo factors enabled; the features of a state arrive before the following state exists',
  breaks='the features of the newest state are put off until another state exists, which cannot come before this one is optimised: the pipeline stops making progress'),
 dict(id='C02-path-drops-start', prop='C02', profile='c02', edits=[(OP,'for (int key = 0; key <= max_key; ++key) {\n        geometry_msgs::PoseStamped','for (int key = max_key > 7 ? 1 : 0; key <= max_key; ++key) {\n        geometry_msgs::PoseStamped')],
  needs='a history of more than eight states', breaks='the published path no longer begins at the first state of the chain'),
 dict(id='C03-bounded-buffer', prop='C03', profile='c03', edits=[(FE,"    imu_buffer.push_back(imu);\n    imu_data_mutex.unlock();","    imu_buffer.push_back(imu);\n    // Bound the memory used by the buffer.\n    while (imu_buffer.size() > 100) {\n        imu_buffer.pop_front();\n    }\n    imu_data_mutex.unlock();")],
  needs='scans held up or the front end waiting for more than 100 IMU periods', breaks='IMU data of the windows that are still to come are thrown away'),
 dict(id='C04-unlocked-adoption', prop='C04', profile='c04', edits=[(FE,"    std::lock_guard<std::mutex> preintegration_guard{preintegration_mutex};\n\n    // Save optimised odometry","    // Save optimised odometry")],
  needs='an IMU callback interleaved with the adoption of a new optimised state', breaks='an odometry message mixes the new state with the old integration'),
 dict(id='C05-carryover', prop='C05', profile='c05', edits=[(FE,"            preintegrated_imu_skew.resetIntegration();\n","")],
  needs='more than one scan with a state time that differs from the scan start', breaks='the motion used to deskew a scan also contains the motion before its start'),
 dict(id='C06-barometer-values', prop='C06', profile='c06', edits=[(GM,'add_values(extracted_new_values, new_values_, P(0), P(max_key));','add_values(extracted_new_values, new_values_, P(std::max(0, max_key - 1)), P(max_key));')],
  needs='several states optimised together with barometer factors', breaks='a barometer bias value is left out of the update'),
 dict(id='C09-late-bracket', prop='C09', profile='c09', edits=[(FE,'while (barometer_buffer.at(1)->header.stamp < barometer_timestamp_buffer.front()) {','while (barometer_buffer.size() > 2 && barometer_buffer.at(2)->header.stamp < barometer_timestamp_buffer.front()) {')],
  needs='several barometer messages between two state times', breaks='the pressure given for a state is extrapolated from messages that do not bracket it'),
 dict(id='C10-frame-at-scan', prop='C10', profile='c10', edits=[(FE,'stereo_buffer.front().timestamp() < previous_pointcloud_start) {\n                        stereo','stereo_buffer.front().timestamp() <= previous_pointcloud_start) {\n                        stereo')],
  needs='a stereo frame stamped exactly at a scan start', breaks='that frame is discarded instead of forwarded, and the state is taken from another time'),
]
