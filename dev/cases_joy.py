P = ['J01']
Q = ['J02']
F = 'joystick_interrupt/src/joystick_interrupt.cpp'
M = 'joystick_interrupt/src/joystick_mux.cpp'
CASES = [
    ('no-restore', 'bug', F, '''      if (last_joy_msg_ != ros::Time(0))
      {
        pub_twist_.publish(last_input_twist_);
      }
''', '', P),
    ('restore-always', 'bug', F, '''      if (last_joy_msg_ != ros::Time(0))
      {
        pub_twist_.publish(last_input_twist_);
      }
''', '''        pub_twist_.publish(last_input_twist_);
''', P),
    ('no-clear', 'bug', F, '''        pub_twist_.publish(last_input_twist_);
      }
      last_joy_msg_ = ros::Time(0);
''', '''        pub_twist_.publish(last_input_twist_);
      }
''', P),
    ('oor-noclear', 'bug', F, '''                msg->buttons.size(), interrupt_button_);
      last_joy_msg_ = ros::Time(0);
''', '''                msg->buttons.size(), interrupt_button_);
''', P),
    ('axis-oob', 'bug', F, 'if (static_cast<size_t>(axis) >= msg->axes.size())', 'if (static_cast<size_t>(axis) > msg->axes.size())', P),
    ('axis-sum', 'bug', F, 'return (std::abs(value2) > std::abs(value)) ? value2 : value;', 'return (value2 > value) ? value2 : value;', P),
    ('y-axis', 'bug', F, 'getJoyValue(msg, linear_y_axis_, linear_y_axis2_, "linear_y_axis")', 'getJoyValue(msg, linear_y_axis_, linear_axis2_, "linear_y_axis")', P),
    ('y-ratio', 'bug', F, '          lin_y *= linear_high_speed_ratio_;\n', '', P),
    ('hs-oob', 'bug', F, 'if (static_cast<size_t>(high_speed_button_) < msg->buttons.size())', 'if (static_cast<size_t>(high_speed_button_) <= msg->buttons.size())', P),
    ('hs-zero', 'bug', F, 'if (high_speed_button_ >= 0)', 'if (high_speed_button_ > 0)', P),
    ('store-if', 'bug', F, '    last_input_twist_ = *msg;\n    std_msgs::Bool status;', '    std_msgs::Bool status;', P),
    ('fwd', 'bug', F, '        (ros::Time::isSimTime() && last_joy_msg_ == ros::Time(0)))', '        (ros::Time::isSimTime() && last_joy_msg_ != ros::Time(0)))', P),
    ('fwd2', 'bug', F, '    if (ros::Time::now() - last_joy_msg_ > ros::Duration(timeout_) ||', '    if (ros::Time::now() - last_joy_msg_ < ros::Duration(timeout_) ||', P),
    ('status', 'bug', F, '      status.data = true;', '      status.data = false;', P),
    ('status-none', 'bug', F, '      status.data = false;\n    }\n', '      return;\n    }\n', P),
    ('swap-param', 'bug', F, 'pnh_.param("linear_axis2", linear_axis2_, -1);\n    pnh_.param("angular_axis2", angular_axis2_, -1);', 'pnh_.param("linear_axis2", angular_axis2_, -1);\n    pnh_.param("angular_axis2", linear_axis2_, -1);', P),
    ('init', 'bug', F, '    last_joy_msg_ = ros::Time(0);\n\n', '    last_joy_msg_ = ros::Time::now();\n\n', P),
    ('ok-ne', 'ok', F, 'if (!msg->buttons[interrupt_button_])', 'if (msg->buttons[interrupt_button_] == 0)', P),
    ('ok-ne2', 'ok', F, '''        if (msg->buttons[high_speed_button_])
''', '''        if (msg->buttons[high_speed_button_] != 0)
''', P),
    ('ok-fwd', 'ok', F, '''    if (ros::Time::now() - last_joy_msg_ > ros::Duration(timeout_) ||
        (ros::Time::isSimTime() && last_joy_msg_ == ros::Time(0)))
    {
      pub_twist_.publish(last_input_twist_);
      status.data = true;
    }
    else
    {
      status.data = false;
    }''', '''    const bool interrupted = !(ros::Time::isSimTime() && last_joy_msg_.isZero()) &&
        !((ros::Time::now() - last_joy_msg_).toSec() > timeout_);
    if (!interrupted)
      pub_twist_.publish(*msg);
    status.data = !interrupted;''', P),
    ('ok-scale', 'ok', F, '''          lin_x *= linear_high_speed_ratio_;
          lin_y *= linear_high_speed_ratio_;
          ang *= angular_high_speed_ratio_;
''', '''          lin_x = lin_x * linear_high_speed_ratio_;
          lin_y = linear_high_speed_ratio_ * lin_y;
          ang *= angular_high_speed_ratio_;
''', P),
    ('ok-axis', 'ok', F, '''    return (std::abs(value2) > std::abs(value)) ? value2 : value;''', '''    if (std::abs(value) >= std::abs(value2))
      return value;
    return value2;''', P),
    ('mux-inv', 'bug', M, 'selected_ = 1;', 'selected_ = 0;', Q),
    ('mux-noreset', 'bug', M, '''    else
    {
      selected_ = 0;
    }
  };''', '''  };''', Q),
    ('mux-timer', 'bug', M, '''    if (ros::Time::now() - last_joy_msg_ > ros::Duration(timeout_))
    {
      selected_ = 0;''', '''    if (ros::Time::now() - last_joy_msg_ > ros::Duration(timeout_))
    {
      selected_ = 1;''', Q),
    ('mux-pressed-only', 'bug', M, '''    last_joy_msg_ = ros::Time::now();
    if (msg->buttons[interrupt_button_])
    {''', '''    if (msg->buttons[interrupt_button_])
    {
      last_joy_msg_ = ros::Time::now();''', Q),
    ('mux-oob', 'bug', M, 'if (static_cast<size_t>(interrupt_button_) >= msg->buttons.size())', 'if (static_cast<size_t>(interrupt_button_) > msg->buttons.size())', Q),
    ('mux-bind', 'bug', M, 'boost::bind(&JoystickMux::cbTopic, this, _1, 1)', 'boost::bind(&JoystickMux::cbTopic, this, _1, 0)', Q),
    ('mux-first', 'bug', M, '''        }
      }
      pub_topic_.publish(*msg);''', '''        }
        return;
      }
      pub_topic_.publish(*msg);''', Q),
    ('mux-init', 'bug', M, '    selected_ = 0;\n  }\n};', '    selected_ = 1;\n  }\n};', Q),
    ('mux-notimer', 'bug', M, '    timer_ = nh_.createTimer(ros::Duration(0.1), &JoystickMux::cbTimer, this);\n', '', Q),
    ('mux-timer-age', 'bug', M, '  void cbTimer(const ros::TimerEvent& e)\n  {\n', '  void cbTimer(const ros::TimerEvent& e)\n  {\n    if (selected_ == 0)\n      last_joy_msg_ = ros::Time::now();\n', Q),
    ('ok-mux', 'ok', M, '''    if (msg->buttons[interrupt_button_])
    {
      selected_ = 1;
    }
    else
    {
      selected_ = 0;
    }''', '''    selected_ = msg->buttons[interrupt_button_] ? 1 : 0;''', Q),
    ('ok-mux2', 'ok', M, '''    if (selected_ == id)
    {
''', '''    if (id != selected_)
      return;
    {
''', Q),
]
