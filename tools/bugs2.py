FE='serpent/src/front_end/frontend.cpp'; OP='serpent/src/back_end/optimisation.cpp'; GM='serpent/src/back_end/graph_manager.cpp'
RG='serpent/include/serpent/front_end/lidar/registration-inl.hpp'; MP='serpent/include/serpent/mapping/mapping-inl.hpp'
UT='serpent/src/utils/utilities.cpp'; TR='serpent/src/front_end/stereo/stereo_feature_tracker.cpp'; SF='serpent/src/front_end/stereo/stereo_factor_finder.cpp'
FM='serpent/src/front_end/lidar/pointcloud_formatter.cpp'; PF='serpent/src/front_end/lidar/pointcloud_filter.cpp'
BUGS=[
 dict(id='C07-newest-map-cloud', prop='C07', profile='c07', edits=[(RG,"    PointCloudConstPtr pointcloud = s2m_pointclouds.front();\n    s2m_pointclouds.pop_front();","    PointCloudConstPtr pointcloud = s2m_pointclouds.back();\n    s2m_pointclouds.pop_front();")],
  needs='local maps that lag behind scan to scan registration, so that two scans wait in the queue', breaks='a scan is registered against the map with the guess of another scan, and its transform carries the wrong time'),
 dict(id='C07-stale-previous-cloud', prop='C07', profile='c07', edits=[(RG,"    previous_pointcloud = current_pointcloud;\n}","    if (!previous_pointcloud || s2s->hasConverged()) {\n        previous_pointcloud = current_pointcloud;\n    }\n}")],
  needs='a scan to scan registration that does not converge', breaks='later scans are registered against a scan that is not the previous one while the guess is relative to the previous one'),
 dict(id='C08-stale-search', prop='C08', profile='c08', edits=[(MP,"            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{\n                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};","            const std::size_t index = pose_cloud_indices.at(it->second.pose.timestamp);\n            if (index + 1 == pose_cloud->size()) {\n                pose_cloud->at(index) = PointAngleAxis{frame_pose_stamped.data.position.cast<float>(),\n                        frame_pose_stamped.data.orientation.cast<float>()};\n            }")],
  needs='NEARBY extraction and optimised corrections of older frames that change which frames are the nearest', breaks='the local map is built of frames that are not the nearest ones'),
 dict(id='C11-sleep-keeps-lock', prop='C11', profile='c11', edits=[(UT,"    while (ros::ok() && condition()) {\n        mutex.unlock();\n        sleep_period.sleep();\n        mutex.lock();\n    }","    bool first{true};\n    while (ros::ok() && condition()) {\n        if (first || !already_locked) {\n            mutex.unlock();\n        }\n        sleep_period.sleep();\n        if (first || !already_locked) {\n            mutex.lock();\n        }\n        first = false;\n    }")],
  needs='a wait of more than one polling period for data guarded by a mutex that the caller had locked', breaks='the wait keeps the mutex, the data can never arrive: the process neither progresses nor shuts down'),
 dict(id='C12-imu-buffer-unlocked', prop='C12', profile='c12', program='race', edits=[(FE,"        imu_data_mutex.lock();\n        gtsam::NavState previous_pointcloud_start_state;","        gtsam::NavState previous_pointcloud_start_state;"),(FE,"        integrate_imu(preintegrated_imu_skew, imu_buffer, previous_pointcloud_start, previous_pointcloud_end);\n        imu_data_mutex.unlock();","        integrate_imu(preintegrated_imu_skew, imu_buffer, previous_pointcloud_start, previous_pointcloud_end);")],
  needs='IMU messages that arrive while a scan is being deskewed', breaks='the IMU buffer is read while another thread appends to it'),
 dict(id='C13-empty-imu-array', prop='C13', profile='c13', edits=[(FE,"    std::size_t i{1};  // Index of imu message after deskew timestamp (which is guaranteed to exist).\n    while (imu_buffer.at(i).timestamp < interp_timestamp) ++i;","    std::size_t i{1};  // Index of imu message after deskew timestamp (which is guaranteed to exist).\n    while (imu_buffer.at(i).timestamp <= interp_timestamp) ++i;")],
  needs='an optimised state stamped exactly at the newest IMU message', breaks='the interpolation reads past the end of the buffer and the process dies'),
 dict(id='C14-id-reuse', prop='C14', profile='c14', edits=[(TR,"    // Create new match ids\n    for","    // Create new match ids\n    if (previous_track_data.match_ids.empty()) {\n        next_match_id = 0;\n    }\n    for")],
  needs='a frame in which every track is lost', breaks='identifiers of old landmarks are given to new ones'),
 dict(id='C14-ids-before-filter', prop='C14', profile='c14', edits=[(TR,"                extract_match_ids(previous_track_data.match_ids, stereo_distance_filter->indices());","                extract_match_ids(new_track_hypotheses.match_ids, stereo_distance_filter->indices());")],
  needs='stereo distance filter enabled and a tracked pair refused by the geometry filter in the same frame', breaks='tracks take over the identifiers of other tracks'),
 dict(id='C15-adopt-after-tf', prop='C15', profile='c15', edits=[(FE,"        ROS_ERROR_STREAM(\"Failed to publish map_frame -> base_link_frame TF or pose. Exception: \" << ex.what());\n    }","        ROS_ERROR_STREAM(\"Failed to publish map_frame -> base_link_frame TF or pose. Exception: \" << ex.what());\n        return;\n    }")],
  needs='the body to base_link transform is unavailable when an optimised state arrives', breaks='the optimised state is not adopted, the front end waits for ever'),
 dict(id='C17-static-filter-state', prop='C17', profile='c17', edits=[(PF,"    filter.setInputCloud(msg);\n    auto pointcloud","    if (!filter.getInputCloud() || filter.getInputCloud()->width * filter.getInputCloud()->height != msg->width * msg->height) {\n        filter.setInputCloud(msg);\n    }\n    auto pointcloud")],
  needs='two consecutive clouds of the same size at a filter', breaks='the points of the previous cloud are published again'),
 dict(id='C09-bracket-equal', prop='C09', profile='c09', edits=[(FE,"        if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {\n            ROS_WARN","        if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front() ||\n                barometer_timestamp_buffer.size() > 1) {\n            ROS_WARN")],
  needs='barometer data that arrive late, so that two states wait for pressure', breaks='the pressure of a state is the raw oldest message instead of the value interpolated at its time'),
 dict(id='C06-imu-window-boundary', prop='C06', profile='c06', edits=[(OP,"    integrate_imu(preintegrated_imu, imu_s2s, msg->start_timestamp, msg->end_timestamp);","    integrate_imu(preintegrated_imu, imu_s2s, imu_s2s.size() > 12 ? imu_s2s.front().timestamp : msg->start_timestamp,\n            msg->end_timestamp);")],
  needs='windows of more than twelve IMU messages whose start is not at a message', breaks='the IMU factor of a long window starts before its first state'),
 dict(id='C05-sweep-of-new-cloud', prop='C05', profile='c05', edits=[(FE,'pct::has_field(*previous_pointcloud, "t") ? pct::max<float>(*previous_pointcloud, "t") : 0};','pct::has_field(*previous_pointcloud, "t") ? pct::max<float>(*msg, "t") : 0};')],
  needs='consecutive scans with different sweep durations', breaks='a scan is deskewed with the sweep duration of the following scan'),
 dict(id='C16-shared-camera-info', prop='C16', profile='c16', program='tools', edits=[('camera_tools/src/split_image.cpp',"        sensor_msgs::CameraInfo camera_info = image_config.camera_info;\n        camera_info.header = output.header;","        auto& camera_info = const_cast<sensor_msgs::CameraInfo&>(image_config.camera_info);\n        camera_info.header = output.header;")],
  needs='an image with operations and more than one message', breaks='the operations are applied to the camera information again with every image'),
 dict(id='C16-path-of-other-run', prop='C16', profile='c16', program='tools', edits=[('navigation_tools/src/combine_transforms.cpp',"    path.header.stamp = transform.timestamp;\n","    if (path.poses.empty() || transform.timestamp - path.header.stamp < ros::Duration(0.35)) {\n        path.header.stamp = transform.timestamp;\n    }\n")],
  needs='a gap of more than 0.35 s between transforms', breaks='the path of every later message keeps an old stamp'),
 dict(id='C21-unlocked-metrics', prop='C21', profile='c21', edits=[('serpent/scripts/metrics_node.py',"        self.optimized_pose_prev = copy.deepcopy(self.optimized_pose_curr)","        self.mutex.release()\n            self.optimized_pose_prev = copy.deepcopy(self.optimized_pose_curr)\n            self.mutex.acquire()")],
  needs='metrics computed between the two assignments of a pose callback', breaks='the relative pose is that of a pose with itself'),
 dict(id='C18-covers-window', prop='C18', profile='c18', edits=[(GM,"        marginalisation_window_size = window_size;","        marginalisation_window_size = window_size > 4 ? 0 : window_size;")],
  needs='a window of more than four states', breaks='all states are marginalised at once, newer factors connect to states that no longer exist'),
 dict(id='C03-missing-first', prop='C03', profile='c03', edits=[(FE,"(it->timestamp > previous_state_time || std::next(it)->timestamp > previous_state_time)) {","(it->timestamp > previous_state_time || (std::next(it)->timestamp > previous_state_time && it->timestamp + ros::Duration(0.02) > previous_state_time))) {")],
  needs='a gap of more than 20 ms in the IMU data around a state time', breaks='the message before the state time is left out of its window'),
]
